//! C28: the text forms of values show what they represent, under every format option.
use mcheck::fmtall::{short, specs, text, Short};
use mcheck::*;
use num_bigint::{BigInt, BigUint};
use std::fmt::{Binary, Debug, Display, Formatter, LowerHex, Octal, Result as FR, UpperHex, Write};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::seq::Sequence;
use tedium::*;

type F<'a> = &'a dyn Fn(&mut Formatter<'_>) -> FR;

/// `got` and `want` write the same text under every combination of options, and both report a writer
/// that runs out of room at any point.
fn same(ck: &mut Ck, what: &dyn Fn() -> String, got: F, want: F) {
    if ck.stop() {
        return;
    }
    let ss = specs(ck.thorough());
    ck.st(1);
    ck.tr(ss.len() as u64);
    ck.case(
        || what(),
        || {
            for o in &ss {
                let (g, w) = (quiet(|| text(*o, got))?, text(*o, want));
                if g != w {
                    return Err(format!("with {o:?} prints {g:?}, expected {w:?}"));
                }
            }
            short(got, want)
        },
    );
}
macro_rules! same_as {
    ($ck:ident, $tr:ident, $x:expr, $y:expr, $($what:tt)*) => {{
        let (x, y) = (&$x, &$y);
        same($ck, &|| format!("{} of {}", stringify!($tr), format!($($what)*)), &|f| $tr::fmt(x, f), &|f| $tr::fmt(y, f));
    }};
}
/// The plain and pretty debug text mentions each of these in this order.
fn says(ck: &mut Ck, what: &dyn Fn() -> String, x: &dyn Debug, parts: &[&str]) {
    ck.st(1);
    ck.tr(2);
    ck.case(
        || format!("Debug of {}", what()),
        || {
            for (t, pretty) in [(quiet(|| format!("{x:?}"))?, false), (quiet(|| format!("{x:#?}"))?, true)] {
                let mut rest = &t[..];
                for p in parts {
                    // a pretty form breaks the parts' inner layout: only words are looked for
                    let words: Vec<&str> = if pretty { p.split(|c: char| !c.is_alphanumeric() && c != '-').filter(|w| !w.is_empty()).collect() } else { vec![p] };
                    for w in words {
                        match rest.find(w) {
                            Some(i) => rest = &rest[i + w.len()..],
                            None => return Err(format!("prints {t:?}, without {p:?}")),
                        }
                    }
                }
            }
            Ok(())
        },
    );
    let all = match quiet(|| format!("{x:?}")) {
        Ok(t) => t,
        Err(_) => return,
    };
    ck.case(
        || format!("Debug of {} into a short writer", what()),
        || {
            for room in 0..all.len() {
                let mut w = Short(room, String::new());
                if write!(w, "{x:?}").is_ok() || !all.starts_with(&w.1) {
                    return Err(format!("room for {room} of {} bytes: reported as written, {:?}", all.len(), w.1));
                }
            }
            Ok(())
        },
    );
}

fn bigs(th: bool) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = (-70..=70).map(BigInt::from).collect();
    for w in [7u32, 8, 13, 14, 31, 32, 62, 63, 64, 65, 127, 128, 129, 200] {
        for d in -1..=1 {
            let p: BigInt = (BigInt::from(1) << w) + d;
            v.push(-p.clone());
            v.push(p);
        }
    }
    let mut t = BigInt::from(1);
    for _ in 0..if th { 80 } else { 45 } {
        t *= 10;
        for d in -1..=1 {
            v.push(t.clone() + d);
            v.push(BigInt::from(d) - t.clone());
        }
    }
    v
}
fn numbers(ck: &mut Ck) {
    for b in bigs(ck.thorough()) {
        let z = Z::new(b.clone());
        same_as!(ck, Display, z, b, "Z {b}");
        says(ck, &|| format!("Z {b}"), &z, &[&b.to_string()]);
        if let Ok(u) = BigUint::try_from(b.clone()) {
            let n = N::new(u.clone());
            same_as!(ck, Display, n, u, "N {u}");
            says(ck, &|| format!("N {u}"), &n, &[&u.to_string()]);
        }
        ck.case(
            || format!("text of {b} read back"),
            || match (z.to_string().parse::<BigInt>(), format!("{z:+}").parse::<BigInt>()) {
                (Ok(x), Ok(y)) if x == b && y == b => Ok(()),
                r => Err(format!("{r:?}")),
            },
        );
    }
}

macro_rules! ranged { ($name:expr, $I:ident, $MIN:literal, $MAX:literal) => {{
    let name = $name;
    section(name, move |ck| {
        let mut v: std::collections::BTreeSet<i64> = Default::default();
        let (lo, hi) = ($MIN as i64, $MAX as i64);
        for p in [lo, hi, 0, (lo + hi) / 2, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 30, -(1 << 7), -(1 << 15), 1000, -1000] {
            v.extend(p - 3..=p + 3);
        }
        for n in v {
            if n < lo || n > hi {
                continue;
            }
            let i = n as i32;
            let Ok(r) = <RangedInt<$I, $MIN, $MAX>>::try_from_i32(i) else {
                ck.case(|| format!("{name}: {n}"), || Err("refused".into()));
                continue;
            };
            same_as!(ck, LowerHex, r, i, "{name} {n}");
            same_as!(ck, UpperHex, r, i, "{name} {n}");
            same_as!(ck, Octal, r, i, "{name} {n}");
            same_as!(ck, Binary, r, i, "{name} {n}");
        }
    })
}}; }

fn byte_strings(max: usize) -> Vec<Vec<u8>> {
    let al = [0u8, b'a', b'Z', b'"', 0x7f, 0x80, 0xc3, 0xa9, 0xff];
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|p| al.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
        v.extend(last.clone());
    }
    v.extend((0..=255u8).map(|b| vec![b]));
    v.push((0..=255).collect());
    v.push("añ→😀".as_bytes().to_vec());
    v
}
fn hexes(ck: &mut Ck) {
    for b in byte_strings(if ck.thorough() { 4 } else { 3 }) {
        let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
        let h = HexString::from(b.clone());
        same_as!(ck, Display, h, hex, "HexString of {hex}");
        says(ck, &|| format!("HexString of {hex}"), &h, &[&hex]);
        let vb = VecBuffer::from(b.clone());
        same_as!(ck, Debug, vb, b, "VecBuffer of {hex}");
        let list = format!("{b:?}");
        says(ck, &|| format!("SliceBuffer of {hex}"), &SliceBuffer::from(&b[..]), &[&list]);
        says(ck, &|| format!("Bytes of {hex}"), &Bytes::from(b.clone()), &[&list]);
        ck.case(
            || format!("text of the hex string {hex} read back"),
            || match h.to_string().parse::<HexString>() {
                Ok(x) if x == h => Ok(()),
                r => Err(format!("{r:?}")),
            },
        );
    }
}
fn fixed<const K: usize>(ck: &mut Ck) {
    for b in byte_strings(K).into_iter().filter(|b| b.len() == K) {
        let a: [u8; K] = b[..].try_into().unwrap();
        let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
        let s = FixedString::from(a);
        let lossy = String::from_utf8_lossy(&b).into_owned();
        same_as!(ck, Display, s, lossy, "FixedString of {hex}");
        let fb = FixedBytes::from(a);
        ck.st(1);
        ck.tr(1);
        ck.case(
            || format!("LowerHex of FixedBytes {hex}"),
            || if format!("{fb:x}") == hex { short(&|f| LowerHex::fmt(&fb, f), &|f| f.write_str(&hex)) } else { Err(format!("{fb:x}")) },
        );
        says(ck, &|| format!("FixedBytes of {hex}"), &fb, &[&format!("{a:?}")]);
    }
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "-1", "\"", "é", "long text, longer than most widths here", "\n", "{}"].iter().map(|s| s.to_string()).collect();
    v.extend((0..12).map(|n| "x".repeat(n)));
    v
}
fn wrappers(ck: &mut Ck) {
    for s in texts() {
        same_as!(ck, Display, AutoBox::new(s.clone()), s, "AutoBox of {s:?}");
        same_as!(ck, Debug, AutoBox::new(s.clone()), s, "AutoBox of {s:?}");
        same_as!(ck, Debug, VPadded::<String, 3>::new(s.clone()), s, "VPadded of {s:?}");
        same_as!(ck, Display, Dynamic::<u8, String>::new(s.clone()), s, "Dynamic of {s:?}");
        same_as!(ck, Display, Dynamic::<u16, String>::from(s.clone()), s, "Dynamic of {s:?}");
        same_as!(ck, Display, Dynamic::<u30, String>::from(s.clone()), s, "Dynamic of {s:?}");
        same_as!(ck, Display, Dynamic::<u8, AutoBox<String>>::new(AutoBox::new(s.clone())), s, "Dynamic AutoBox of {s:?}");
        let (l, q) = (s.len().to_string(), format!("{s:?}"));
        says(ck, &|| format!("Dynamic<u8> of {s:?}"), &Dynamic::<u8, String>::new(s.clone()), &[&l, "u8", &q]);
        says(ck, &|| format!("Dynamic<u16> of {s:?}"), &Dynamic::<u16, String>::new(s.clone()), &[&l, "u16", &q]);
        says(ck, &|| format!("Dynamic<u30> of {s:?}"), &Dynamic::<u30, String>::new(s.clone()), &[&l, "u30", &q]);
        says(ck, &|| format!("Padded of {s:?}"), &Padded::<String, 3>::new(s.clone()), &[&q]);
        says(ck, &|| format!("Nullable of {s:?}"), &Nullable::<String>::from(Some(s.clone())), &[&q]);
    }
    for i in [0i32, 1, -1, 7, 255, 256, i32::MAX, i32::MIN] {
        same_as!(ck, Display, AutoBox::new(i), i, "AutoBox of {i}");
        same_as!(ck, Debug, AutoBox::new(i), i, "AutoBox of {i}");
        same_as!(ck, Debug, AutoBox::new(AutoBox::new(Some(i))), Some(i), "AutoBox AutoBox of {i}");
        same_as!(ck, Debug, VPadded::<i32, 0>::new(i), i, "VPadded of {i}");
        same_as!(ck, Debug, VPadded::<Vec<i32>, 300>::new(vec![i, i]), vec![i, i], "VPadded of a vector of {i}");
        same_as!(ck, Display, Dynamic::<u8, i32>::new(i), i, "Dynamic of {i}");
        let t = i.to_string();
        says(ck, &|| format!("Dynamic of {i}"), &Dynamic::<u8, i32>::new(i), &["4", "u8", &t]);
        says(ck, &|| format!("Padded of {i}"), &Padded::<i32, 3>::new(i), &[&t]);
        says(ck, &|| format!("Nullable of {i}"), &Nullable::<i32>::from(Some(i)), &[&t]);
    }
    for n in [0usize, 1, 2, 9, 10, 99, 100, 255, 256, 300] {
        let v = vec![1u8; n];
        let (l, q) = (n.to_string(), format!("{v:?}"));
        says(ck, &|| format!("Dynamic of {n} bytes"), &Dynamic::<u30, Bytes>::new(Bytes::from(v.clone())), &[&l, "u30", &q]);
        let v2: Vec<u16> = vec![7; n];
        let (l, q) = ((2 * n).to_string(), format!("{v2:?}"));
        says(ck, &|| format!("Dynamic of {n} numbers"), &Dynamic::<u16, Sequence<u16>>::new(Sequence::from(v2.clone())), &[&l, "u16", &q]);
    }
    for f in [0.0f64, -0.0, 1.5, -2.25, 100.0, 1e-9] {
        const LO: u64 = (-100.0f64).to_bits();
        const HI: u64 = 100.0f64.to_bits();
        let Ok(r) = <RangedFloat<LO, HI>>::try_from(f) else {
            ck.case(|| format!("RangedFloat {f}"), || Err("refused".into()));
            continue;
        };
        says(ck, &|| format!("RangedFloat {f}"), &r, &[&format!("{f:?}")]);
    }
}

cstyle!(Color, u8, { Red = 0, Green = 1, Blue = 255 });
data!(Shape, u8, shape, { 0 => Point (), 1 => Circle { r: u16 }, 2 => Label { s: Dynamic<u8, String> } });
fn enums(ck: &mut Ck) {
    for (c, n) in [(Color::Red, "Red"), (Color::Green, "Green"), (Color::Blue, "Blue")] {
        ck.case(|| format!("Debug of {n}"), || if format!("{c:?}") == n { Ok(()) } else { Err(format!("{c:?}")) });
    }
    for r in [0u16, 7, 255, 65535] {
        let x: Shape = Shape::try_decode::<_, ByteParser>(vec![1, (r >> 8) as u8, r as u8]).unwrap();
        says(ck, &|| format!("a union with the field {r}"), &x, &["Circle", "r", &r.to_string()]);
    }
    says(ck, &|| "a union without payload".into(), &Shape::try_decode::<_, ByteParser>(vec![0]).unwrap(), &["Point"]);
    for s in texts() {
        let x = Shape::try_decode::<_, ByteParser>([&[2, s.len() as u8], s.as_bytes()].concat()).unwrap();
        says(ck, &|| format!("a union with the text {s:?}"), &x, &["Label", &format!("{s:?}")]);
    }
}

fn main() {
    run(
        Spec {
            prop: "C28",
            explanation: "states = values printed; transitions = combinations of format options (width, precision, alignment, fill, sign, zero padding, alternate form) or writer capacities, each printing through the library and through the standard type that is the oracle: big integers, i32 in four radices, text, lossy text, the wrapped value. Debug forms must mention the number, bytes, text, sizes and names they stand for. Writers with room for every shorter prefix must be reported as failed.",
            assumptions: &["the exact layout of debug forms is free", "FixedBytes' hexadecimal form ignores format options"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |_| {
            let mut v = vec![
                section("naturals and integers", numbers),
                section("hex strings and buffers", hexes),
                section("fixed strings of 0", fixed::<0>),
                section("fixed strings of 1", fixed::<1>),
                section("fixed strings of 2", fixed::<2>),
                section("fixed strings of 3", fixed::<3>),
                section("wrappers", wrappers),
                section("enumerations and unions", enums),
            ];
            macro_rules! r { ($($t:ident $min:literal $max:literal),*) => {$( v.push(ranged!(concat!("RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">"), $t, $min, $max)); )*}; }
            r!(u8 0 255, u8 10 20, u8 100 300, i8 -128 127, i8 -5 5, i8 3 100, u16 0 65535, u16 1000 2000, i16 -32768 32767, i16 -300 -200, i32 -2147483648 2147483647, i32 -1 1, u32 0 2147483647, u32 65536 65540, u32 0 1073741823);
            v
        },
    )
}
