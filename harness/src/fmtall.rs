//! All combinations of format options, over a writer.
use std::fmt::{self, Alignment, Formatter, FormattingOptions, Sign};

/// Every combination of width, fill and alignment, sign, zero padding, alternate form and precision.
pub fn specs(deep: bool) -> Vec<FormattingOptions> {
    let widths: &[Option<u16>] = if deep { &[None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(8), Some(13), Some(21), Some(40)] } else { &[None, Some(1), Some(6), Some(17), Some(40)] };
    let precs: &[Option<u16>] = if deep { &[None, Some(0), Some(1), Some(2), Some(3), Some(7), Some(30)] } else { &[None, Some(0), Some(3), Some(30)] };
    let fills = if deep { vec![' ', '*', '0', 'é'] } else { vec![' ', '*'] };
    let mut v = vec![];
    for w in widths {
        for p in precs {
            for al in [None, Some(Alignment::Left), Some(Alignment::Center), Some(Alignment::Right)] {
                for fill in &fills {
                    if al.is_none() && *fill != ' ' {
                        continue;
                    }
                    for sign in [None, Some(Sign::Plus)] {
                        for flags in 0..4 {
                            let mut o = FormattingOptions::new();
                            o.width(*w).precision(*p).align(al).fill(*fill).sign(sign).alternate(flags & 1 != 0).sign_aware_zero_pad(flags & 2 != 0);
                            v.push(o);
                        }
                    }
                }
            }
        }
    }
    v
}
/// The text a formatting function writes with these options.
pub fn text(o: FormattingOptions, f: impl Fn(&mut Formatter<'_>) -> fmt::Result) -> Result<String, fmt::Error> {
    let mut s = String::new();
    f(&mut o.create_formatter(&mut s))?;
    Ok(s)
}
/// A writer with room for a number of bytes, after which it fails.
pub struct Short(pub usize, pub String);
impl fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}
/// A writer that runs out of room is reported, and what was written is a prefix of the text.
pub fn short(got: &dyn Fn(&mut Formatter<'_>) -> fmt::Result, want: &dyn Fn(&mut Formatter<'_>) -> fmt::Result) -> Result<(), String> {
    let all = text(FormattingOptions::new(), want).map_err(|e| e.to_string())?;
    for room in 0..=all.len() {
        let mut w = Short(room, String::new());
        let r = got(&mut FormattingOptions::new().create_formatter(&mut w));
        if r.is_ok() != (room == all.len()) || !all.starts_with(&w.1) {
            return Err(format!("a writer with room for {room} of {} bytes: {r:?}, got {:?}", all.len(), w.1));
        }
    }
    Ok(())
}
