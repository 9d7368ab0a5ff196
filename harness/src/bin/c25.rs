//! C25: wrapper types add exactly their documented bytes around the inner codec.
use mcheck::catalog::*;
use mcheck::inputs::*;
use mcheck::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::dynamic::LenPref;
use tedium::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Pad(usize),
    VPad(usize),
    Null,
    Opt,
    Boxed,
}

/// The windows around the decoder: `pre` bytes are consumed, then the windows are opened, each
/// inside the one before.
#[derive(Clone, Debug)]
struct Ctx {
    pre: usize,
    wins: Vec<usize>,
}
/// What a decoder gave, how far it went, and what reading on shows of the windows around it.
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    val: Val,
    used: usize,
    /// per window, innermost first: how much was left in it, and whether it closed after that much
    after: Vec<(usize, bool)>,
}

fn seen<T: Reflect, P: Parser>(mut p: P, c: &Ctx) -> Option<Seen> {
    p.consume(c.pre).expect("context");
    for w in &c.wins {
        p.set_fit(*w).expect("context");
    }
    let before = p.remainder();
    let v = T::parse(&mut p).ok()?.val();
    let used = before.wrapping_sub(p.remainder());
    let mut after = vec![];
    for i in 0..=c.wins.len() {
        let k = p.remainder();
        let took = p.consume(k).map(|x| x.len()).ok() == Some(k);
        let closed = p.enforce_target().is_ok();
        after.push((k, took && (closed || i == c.wins.len())));
        if i == c.wins.len() && closed {
            after.push((usize::MAX, true));
        }
    }
    Some(Seen { val: v, used, after })
}
fn dec_in<T: Reflect>(k: PK, buf: &[u8], c: &Ctx) -> Option<Seen> {
    match k {
        PK::Byte => seen::<T, _>(ByteParser::from_buffer(VecBuffer::from(buf)), c),
        PK::Memo => seen::<T, _>(MemoParser::from_buffer(VecBuffer::from(buf)), c),
        PK::Slice => seen::<T, _>(SliceParser::from_buffer(SliceBuffer::new(buf)), c),
    }
}
/// What is written by each route, with the reported count.
fn enc_all<T: Reflect>(v: &Val) -> (Vec<u8>, usize, Vec<Vec<u8>>, Val) {
    let t = T::make(v);
    let mut out = vec![];
    let n = t.write_to(&mut out);
    let mut o2 = vec![1, 2];
    t.write_to_vec(&mut o2);
    let mut hx = HexString::new();
    t.write_to(&mut hx);
    let ways = vec![
        o2[2..].to_vec(),
        t.to_bytes(),
        t.encode::<StrictBuilder>().into(),
        t.encode::<MemoBuilder>().into(),
        hx.into(),
    ];
    (out, n, ways, t.val())
}
type Lens = fn(&Val) -> (Option<usize>, usize, usize, usize);
fn lens<T: Reflect + Estimable>(v: &Val) -> (Option<usize>, usize, usize, usize) {
    let t = T::make(v);
    (T::KNOWN, t.unknown(), t.estimate(), t.enc_len())
}

struct W {
    kind: Kind,
    inner: Sch,
    outer: Sch,
    enc: [fn(&Val) -> (Vec<u8>, usize, Vec<Vec<u8>>, Val); 2],
    dec: [fn(PK, &[u8], &Ctx) -> Option<Seen>; 2],
    len: Option<[Lens; 2]>,
}

/// The value the wrapped encoder is given for a wrapper value, if there is one.
fn inside(kind: Kind, v: &Val) -> Option<Val> {
    match (kind, v) {
        (Kind::Null, Val::Opt(o)) | (Kind::Opt, Val::Opt(o)) => o.as_ref().map(|x| (**x).clone()),
        _ => Some(v.clone()),
    }
}

fn explore(ck: &mut Ck, name: &str, w: &W, tier: Tier) {
    let th = tier == Tier::Thorough;
    let opts = Opts { check_padding: cfg!(feature = "check_padding") };
    let vs = vals(&w.outer, Dom { lvl: if th { 2 } else { 1 }, long: true, cap: if th { 5000 } else { 300 }, depth: 2 });
    ck.st(vs.len() as u64);
    for v in &vs {
        if ck.stop() {
            return;
        }
        ck.tr(1);
        ck.case(
            || format!("{name}: {}", vshow(v)),
            || {
                let iv = inside(w.kind, v);
                let body = match &iv {
                    Some(i) => (w.enc[0])(i).0,
                    None => vec![],
                };
                let want = match w.kind {
                    Kind::Pad(n) => [&body[..], &vec![0; n]].concat(),
                    Kind::VPad(_) | Kind::Boxed | Kind::Null => body.clone(),
                    Kind::Opt => match iv {
                        Some(_) => [&[0xff], &body[..]].concat(),
                        None => vec![0],
                    },
                };
                let (out, n, ways, held) = (w.enc[1])(v);
                if out != want || n != want.len() {
                    return Err(format!("writes {} and reports {n}, expected {}", hexs(&out), hexs(&want)));
                }
                for (i, o) in ways.iter().enumerate() {
                    if *o != want {
                        return Err(format!("route {i} gives {}, expected {}", hexs(o), hexs(&want)));
                    }
                }
                if held != *v {
                    return Err(format!("holds {}", vshow(&held)));
                }
                if let Some([li, lo]) = w.len {
                    let (k, u, e, l) = lo(v);
                    if u != want.len() || e != want.len() || l != want.len() {
                        return Err(format!("unknown() {u}, estimate() {e}, enc_len() {l}, {} bytes are written", want.len()));
                    }
                    if let Some(i) = &iv {
                        let ki = li(i).0;
                        let kw = match w.kind {
                            Kind::Pad(n) => ki.map(|x| x + n),
                            Kind::VPad(_) | Kind::Boxed => ki,
                            Kind::Null => ki.filter(|x| *x == 0),
                            Kind::Opt => ki.filter(|x| *x == 0).map(|_| 1),
                        };
                        if k != kw {
                            return Err(format!("KNOWN is {k:?}, the inner type's {ki:?}"));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    let seeds: Vec<Vec<u8>> = vs
        .iter()
        .map(|v| {
            let mut e = encv(&w.outer, v);
            // what virtual padding reserves
            e.extend((0..tail_need(&w.outer)).map(|i| 0xB0 + i as u8));
            e
        })
        .collect();
    let bounds = InBounds { words: if th { 30_000 } else { 1500 }, seeds: if th { 150 } else { 25 }, positions: if th { 40 } else { 16 }, full_bytes: th, two_bytes: false };
    let mut ins = inputs(&w.outer, &bounds, &seeds);
    if let Kind::Pad(n) = w.kind {
        // every kind of padding byte at every position
        for s in seeds.iter().take(if th { 40 } else { 8 }) {
            for i in 0..n.min(s.len()) {
                for x in [1u8, 0x80, 0xff] {
                    let mut b = s.clone();
                    let l = b.len();
                    b[l - 1 - i] = x;
                    ins.push(b);
                }
            }
        }
    }
    ck.st(ins.len() as u64);
    for b in &ins {
        let l = b.len();
        let frame = |pre: usize, post: usize| {
            let mut v: Vec<u8> = (0..pre).map(|i| 0xC0 + i as u8).collect();
            v.extend_from_slice(b);
            v.extend((0..post).map(|i| [0, 0xff, 1, 0][i % 4]));
            v
        };
        let ctxs = [
            (frame(0, 0), Ctx { pre: 0, wins: vec![] }),
            (frame(2, 0), Ctx { pre: 2, wins: vec![] }),
            (frame(1, 4), Ctx { pre: 1, wins: vec![l] }),
            (frame(3, 5), Ctx { pre: 3, wins: vec![l + 3, l] }),
            (frame(0, 2), Ctx { pre: 0, wins: vec![l + 2, l, l] }),
        ];
        for (buf, c) in &ctxs {
            if ck.stop() {
                return;
            }
            ck.tr(3);
            ck.case(
                || format!("decode {name} from {} in {c:?}", hexs(buf)),
                || {
                    // by the layout
                    let want = decv(&w.outer, b, opts);
                    for k in PKS {
                        let g = (w.dec[1])(k, buf, c);
                        match (&g, &want) {
                            (None, None) => {}
                            (Some(s), Some((v, used))) => {
                                if s.val != *v || s.used != *used {
                                    return Err(format!("{k:?} parser: {} using {}, the layout gives {} using {used}", vshow(&s.val), s.used, vshow(v)));
                                }
                                let mut after = vec![];
                                let mut inner = l;
                                let mut pos = l - used;
                                after.push((pos, true));
                                for w in c.wins.iter().rev().skip(1).copied().chain(if c.wins.is_empty() { None } else { Some(buf.len() - c.pre) }) {
                                    pos = w - inner;
                                    inner = w;
                                    after.push((pos, true));
                                }
                                if s.after != after {
                                    return Err(format!("{k:?} parser: afterwards the windows are {:?}, expected {after:?}", s.after));
                                }
                            }
                            _ => return Err(format!("{k:?} parser: {g:?}, the layout gives {want:?}")),
                        }
                        // relative to the inner decoder itself
                        let rel: Option<(Val, usize)> = match w.kind {
                            Kind::Boxed => (w.dec[0])(k, buf, c).map(|s| (s.val, s.used)),
                            Kind::Pad(n) => (w.dec[0])(k, buf, c).filter(|s| l - s.used >= n).map(|s| (s.val, s.used + n)),
                            Kind::VPad(n) => {
                                if l < n {
                                    None
                                } else {
                                    let mut c = c.clone();
                                    c.wins.push(l - n);
                                    (w.dec[0])(k, buf, &c).filter(|s| s.used == l - n).map(|s| (s.val, s.used))
                                }
                            }
                            Kind::Null => {
                                if l == 0 {
                                    Some((Val::Opt(None), 0))
                                } else {
                                    (w.dec[0])(k, buf, c).map(|s| (Val::Opt(Some(Box::new(s.val))), s.used))
                                }
                            }
                            Kind::Opt => match b.first() {
                                Some(0) => Some((Val::Opt(None), 1)),
                                Some(0xff) => {
                                    let mut c = c.clone();
                                    c.pre += 1;
                                    c.wins.iter_mut().for_each(|w| *w -= 1);
                                    (w.dec[0])(k, buf, &c).map(|s| (Val::Opt(Some(Box::new(s.val))), s.used + 1))
                                }
                                _ => None,
                            },
                        };
                        let strict = opts.check_padding && matches!(w.kind, Kind::Pad(_));
                        let g = g.map(|s| (s.val, s.used));
                        if g != rel && !(strict && g.is_none()) {
                            return Err(format!("{k:?} parser: {g:?}, the inner decoder's result calls for {rel:?}"));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn w<T: Reflect, O: Reflect>(kind: Kind) -> W {
    W { kind, inner: T::sch(), outer: O::sch(), enc: [enc_all::<T>, enc_all::<O>], dec: [dec_in::<T>, dec_in::<O>], len: None }
}
fn wl<T: Reflect + Estimable, O: Reflect + Estimable>(kind: Kind) -> W {
    W { len: Some([lens::<T>, lens::<O>]), ..w::<T, O>(kind) }
}
fn add(v: &mut Vec<Section>, tier: Tier, name: String, make: fn(Kind) -> W, kind: Kind) {
    v.push(section(name.clone(), move |ck| explore(ck, &name, &make(kind), tier)));
}
macro_rules! pads {
    ($v:ident, $tier:ident, $how:ident, $t:ty; $($n:literal)*) => {$(
        add(&mut $v, $tier, format!("Padded<{}, {}>", stringify!($t), $n), $how::<$t, Padded<$t, $n>>, Kind::Pad($n));
    )*};
}
macro_rules! vpads {
    ($v:ident, $tier:ident, $t:ty; $($n:literal)*) => {$(
        add(&mut $v, $tier, format!("VPadded<{}, {}>", stringify!($t), $n), wl::<$t, VPadded<$t, $n>>, Kind::VPad($n));
    )*};
}
macro_rules! rest {
    ($v:ident, $tier:ident, $t:ty) => {
        add(&mut $v, $tier, concat!("Nullable<", stringify!($t), ">").into(), wl::<$t, Nullable<$t>>, Kind::Null);
        add(&mut $v, $tier, concat!("Option<", stringify!($t), ">").into(), wl::<$t, Option<$t>>, Kind::Opt);
        add(&mut $v, $tier, concat!("AutoBox<", stringify!($t), ">").into(), wl::<$t, AutoBox<$t>>, Kind::Boxed);
    };
}
#[cfg(feature = "relaxed_padding_invariant")]
macro_rules! loose {
    ($v:ident, $tier:ident, $t:ty; $($n:literal)*) => { pads!($v, $tier, wl, $t; $($n)*) };
}
#[cfg(not(feature = "relaxed_padding_invariant"))]
macro_rules! loose {
    ($v:ident, $tier:ident, $t:ty; $($n:literal)*) => { pads!($v, $tier, w, $t; $($n)*) };
}
macro_rules! known {
    ($v:ident, $tier:ident; $($t:ty),* $(,)?) => {$(
        pads!($v, $tier, wl, $t; 0 1 2 3 4 7 40 300);
        vpads!($v, $tier, $t; 0 1 2 3 4 7);
        rest!($v, $tier, $t);
    )*};
}
macro_rules! unknown {
    ($v:ident, $tier:ident; $($t:ty),* $(,)?) => {$(
        loose!($v, $tier, $t; 0 1 2 3 4 17);
        vpads!($v, $tier, $t; 0 1 2 3 4 7);
        rest!($v, $tier, $t);
    )*};
}

// ---- accessors, conversions, comparisons -------------------------------------------------------
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} gives {got:?}, expected {want:?}"))
    }
}
/// `a` and `b` are two inner values, compared and held by every wrapper.
fn api<T: Clone + Ord + Hash + std::fmt::Debug + Default, const K: usize>(a: &T, b: &T) -> Result<(), String> {
    // AutoBox
    let x = AutoBox::new(a.clone());
    for (how, y) in [("From<T>", AutoBox::from(a.clone())), ("From<Box<T>>", AutoBox::from(Box::new(a.clone()))), ("from_boxed", AutoBox::from_boxed(Box::new(a.clone()))), ("clone", x.clone())] {
        if y != x || hash(&y) != hash(&x) {
            return Err(format!("AutoBox: {how} gives {y:?}, new {x:?}"));
        }
    }
    eq("AutoBox::as_inner", x.as_inner(), a)?;
    eq("AutoBox as AsRef<T>", <AutoBox<T> as AsRef<T>>::as_ref(&x), a)?;
    eq("AutoBox as AsRef<Box<T>>", <AutoBox<T> as AsRef<Box<T>>>::as_ref(&x), &Box::new(a.clone()))?;
    eq("AutoBox::into_inner", x.clone().into_inner(), a.clone())?;
    eq("AutoBox::into_box", x.clone().into_box(), Box::new(a.clone()))?;
    eq("AutoBox::default", AutoBox::<T>::default().into_inner(), T::default())?;
    eq("AutoBox's order", x.cmp(&AutoBox::new(b.clone())), a.cmp(b))?;
    eq("AutoBox's equality", x == AutoBox::new(b.clone()), a == b)?;
    eq("AutoBox's debug form", format!("{x:?}"), format!("{a:?}"))?;
    let mut y = x.clone();
    *y.as_mut_inner() = b.clone();
    eq("AutoBox::as_mut_inner", y.as_inner(), b)?;
    *y.as_mut_boxed() = Box::new(a.clone());
    eq("AutoBox::as_mut_boxed", y.as_inner(), a)?;
    *<AutoBox<T> as AsMut<T>>::as_mut(&mut y) = b.clone();
    eq("AutoBox as AsMut", y.as_inner(), b)?;
    eq("the original of a changed clone", x.as_inner(), a)?;
    // Padded
    let p = Padded::<T, K>::new(a.clone());
    for (how, y) in [("From<T>", Padded::<T, K>::from(a.clone())), ("with_padding", Padded::<T, 0>::with_padding::<K>(a.clone())), ("clone", p.clone())] {
        if y != p || hash(&y) != hash(&p) {
            return Err(format!("Padded: {how} gives {y:?}, new {p:?}"));
        }
    }
    eq("PADDING", Padded::<T, K>::PADDING, K)?;
    eq("padding()", p.padding(), K)?;
    eq("Padded::as_inner", p.as_inner(), a)?;
    eq("Padded::into_inner", p.clone().into_inner(), a.clone())?;
    eq("Padded::default", Padded::<T, K>::default().into_inner(), T::default())?;
    eq("Padded's order", p.cmp(&Padded::new(b.clone())), a.cmp(b))?;
    eq("Padded's equality", p == Padded::new(b.clone()), a == b)?;
    let mut y = p.clone();
    *y.as_mut_inner() = b.clone();
    eq("Padded::as_mut_inner", y.as_inner(), b)?;
    eq("the original of a changed clone", p.as_inner(), a)?;
    // VPadded
    let p = VPadded::<T, K>::new(a.clone());
    eq("VPadded: From<T>", VPadded::<T, K>::from(a.clone()), p.clone())?;
    eq("VPadded::into_inner", p.clone().into_inner(), a.clone())?;
    eq("VPadded::default", VPadded::<T, K>::default().into_inner(), T::default())?;
    eq("VPadded's order", p.cmp(&VPadded::new(b.clone())), a.cmp(b))?;
    eq("VPadded's equality", p == VPadded::new(b.clone()), a == b)?;
    eq("VPadded's debug form", format!("{p:?}"), format!("{a:?}"))?;
    // Dynamic
    fn dynamic<S: LenPref + 'static, T: Clone + Ord + Hash + std::fmt::Debug>(a: &T, b: &T) -> Result<(), String> {
        let d = Dynamic::<S, T>::new(a.clone());
        for (how, y) in [("From<T>", Dynamic::<S, T>::from(a.clone())), ("clone", d.clone())] {
            if y != d || hash(&y) != hash(&d) || y.as_ref() != a {
                return Err(format!("Dynamic: {how} gives {:?}, not {a:?}", y.as_ref()));
            }
        }
        eq("Dynamic as Borrow", <Dynamic<S, T> as std::borrow::Borrow<T>>::borrow(&d), a)?;
        eq("the hash of a Dynamic and of what it borrows as", hash(&d), hash(a))?;
        eq("Dynamic::into_inner", d.clone().into_inner(), a.clone())?;
        let e = Dynamic::<S, T>::new(b.clone());
        eq("Dynamic's order", d.cmp(&e), a.cmp(b))?;
        eq("Dynamic's partial order", d.partial_cmp(&e), a.partial_cmp(b))?;
        eq("Dynamic's equality", d == e, a == b)?;
        let mut y = d.clone();
        *y.as_mut() = b.clone();
        eq("Dynamic as AsMut", y.as_ref(), b)?;
        eq("the original of a changed clone", d.as_ref(), a)
    }
    dynamic::<u8, T>(a, b)?;
    dynamic::<u16, T>(a, b)?;
    dynamic::<u30, T>(a, b)?;
    // Nullable
    for o in [None, Some(a.clone())] {
        let mut n: Nullable<T> = Nullable::from(o.clone());
        eq("Nullable::is_some", n.is_some(), o.is_some())?;
        eq("Nullable::is_none", n.is_none(), o.is_none())?;
        eq("Nullable::as_inner", n.as_inner(), &o)?;
        eq("Nullable::into_inner", n.clone().into_inner(), o.clone())?;
        eq("Nullable into Option", Option::<T>::from(n.clone()), o.clone())?;
        for q in [None, Some(b.clone())] {
            eq("Nullable's order", n.cmp(&Nullable::from(q.clone())), o.cmp(&q))?;
            eq("Nullable's equality", n == Nullable::from(q.clone()), o == q)?;
        }
        *n.as_mut_inner() = Some(b.clone());
        eq("Nullable::as_mut_inner", n.as_inner(), &Some(b.clone()))?;
        *n.as_mut_inner() = None;
        eq("Nullable::is_none after clearing", n.is_none(), true)?;
    }
    eq("Nullable: From<T>", <Nullable<T> as From<T>>::from(a.clone()).into_inner(), Some(a.clone()))?;
    eq("Nullable::default", Nullable::<T>::default().into_inner(), None)
}
fn apis<T: Clone + Ord + Hash + std::fmt::Debug + Default + Send + Sync + 'static>(v: &mut Vec<Section>, name: &'static str, vs: Vec<T>) {
    v.push(section(format!("accessors over {name}"), move |ck| {
        for a in &vs {
            for b in &vs {
                ck.st(1);
                ck.tr(5);
                ck.case(|| format!("wrappers of {a:?} and {b:?}"), || api::<T, 0>(a, b).and_then(|_| api::<T, 1>(a, b)).and_then(|_| api::<T, 2>(a, b)).and_then(|_| api::<T, 5>(a, b)).and_then(|_| api::<T, 300>(a, b)));
            }
        }
    }));
}

fn main() {
    run(
        Spec {
            prop: "C25",
            explanation: "states = (wrapper type, value) and (wrapper type, input, surrounding windows); a transition = one value encoded by every route with all its lengths, or one input decoded by one of the three real parsers, followed by reading out and closing every surrounding window. Wrapper types: padding (8 widths) and virtual padding (6 widths), nullable, optional and boxed forms of thirty inner types. Inputs: all words over each wrapper's tailored alphabet up to the stated number, encodings and their one-edit neighbourhood, each in five arrangements of windows. Two oracles: the layout's reference decoder, and the documented relation to what the real inner decoder gives on the same bytes. Run also with the padding check.",
            assumptions: &["virtual padding directly inside virtual padding is no schema", "the padded type's static length is only defined for inner types that have one (documented), without relaxed_padding_invariant"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = vec![];
            known!(v, tier; (), u8, i16, u32, bool, f64, u30, FixedBytes<3>, FixedString<2>, RangedInt<u8, 10, 20>, RangedInt<i16, -300, 300>, E8, E16, P2, Option<()>, AutoBox<u16>, Padded<u8, 2>, FixSeq<u16, 2>);
            unknown!(v, tier; Bytes, String, Vec<u8>, N, Z, Option<u16>, Nullable<u16>, Dynamic<u8, Bytes>, Dynamic<u16, Sequence<u16>>, Sequence<u8>, Sequence<u16>, Sequence<Dynamic<u8, Bytes>>, LimSeq<u8, 3>, FixSeq<N, 2>, T3, U8, VTail, OptTail, AutoBox<Bytes>);
            apis(&mut v, "u8", vec![0u8, 1, 7, 255]);
            apis(&mut v, "i32", vec![0i32, -1, i32::MIN, i32::MAX]);
            apis(&mut v, "String", vec![String::new(), "a".into(), "b\u{e9}".into()]);
            apis(&mut v, "Vec<u16>", vec![vec![], vec![1u16], vec![0, 9]]);
            apis(&mut v, "Option<u8>", vec![None, Some(0u8), Some(9)]);
            apis(&mut v, "()", vec![()]);
            v.push(section("boxed display", |ck| {
                for s in ["", "x", "a\u{e9}b"] {
                    ck.st(1);
                    ck.tr(1);
                    ck.case(
                        || format!("{s:?}"),
                        || {
                            eq("display", format!("{}", AutoBox::new(s)), s.to_string())?;
                            eq("aligned display", format!("{:>6}|{:<6}|{:^6}", AutoBox::new(s), AutoBox::new(s), AutoBox::new(s)), format!("{s:>6}|{s:<6}|{s:^6}"))?;
                            eq("alternate debug", format!("{:#?}", AutoBox::new(vec![s])), format!("{:#?}", vec![s]))
                        },
                    );
                }
            }));
            v
        },
    )
}
