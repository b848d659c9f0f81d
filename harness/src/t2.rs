//! A reference interpreter of Type 2 charstrings, three-valued about how they
//! end, and what is observed of the code under test.

use postscript::type2::{Operator, Program};

use crate::spec;

pub type Op = (Operator, Vec<f32>);

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The end operator was reached, with nothing after it.
    Done,
    /// The charstring is malformed at this point.
    Reject(&'static str),
    /// Nothing is promised from this point on.
    Undefined(&'static str),
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub ops: Vec<Op>,
    pub end: End,
    pub width: Option<f32>,
    pub tokens: u64,
    pub depth: usize,
    pub calls: u64,
    pub masks: u64,
    pub mask_bytes: u64,
    pub stems: usize,
    pub arithmetic: u64,
    pub highest: usize,
    pub implied: bool,
    /// The end composes accents.
    pub accent: bool,
    /// The operator that cleared the stack first, the end included.
    pub first: Option<u16>,
}

const TOKENS: u64 = 400_000;
pub const NESTING: usize = 10;
const STACK: usize = 48;

pub fn bias(count: usize) -> i64 {
    if count < 1240 {
        107
    } else if count < 33900 {
        1131
    } else {
        32768
    }
}

enum Stop {
    End,
    Reject(&'static str),
    Undefined(&'static str),
}

use Stop::{Reject, Undefined};

struct State<'l> {
    frames: Vec<(&'l [u8], usize)>,
    stack: Vec<f32>,
    cleared: bool,
    drawn: bool,
    masked: bool,
    trace: Trace,
}

pub fn interpret(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> Trace {
    let mut state = State {
        frames: vec![(code, 0)],
        stack: vec![],
        cleared: false,
        drawn: false,
        masked: false,
        trace: Trace {
            ops: vec![],
            end: End::Done,
            width: None,
            tokens: 0,
            depth: 0,
            calls: 0,
            masks: 0,
            mask_bytes: 0,
            stems: 0,
            arithmetic: 0,
            highest: 0,
            implied: false,
            accent: false,
            first: None,
        },
    };
    let stop = loop {
        if let Err(stop) = state.token(global, local) {
            break stop;
        }
    };
    state.trace.end = match stop {
        Stop::End => End::Done,
        Reject(why) => End::Reject(why),
        Undefined(why) => End::Undefined(why),
    };
    state.trace
}

impl<'l> State<'l> {
    fn byte(&mut self) -> Option<u8> {
        let (code, at) = self.frames.last_mut().unwrap();
        let byte = code.get(*at).copied();
        *at += byte.is_some() as usize;
        byte
    }

    fn need(&mut self) -> Result<u8, Stop> {
        self.byte().ok_or(Reject("cut inside a token"))
    }

    fn pop(&mut self) -> Result<f32, Stop> {
        self.stack.pop().ok_or(Reject("out of operands"))
    }

    fn whole(&mut self) -> Result<f32, Stop> {
        let value = self.pop()?;
        if value.fract() != 0.0 {
            return Err(Reject("a fractional operand"));
        }
        Ok(value)
    }

    fn push(&mut self, value: f32) -> Result<(), Stop> {
        if !value.is_finite() {
            return Err(Undefined("not a finite number"));
        }
        if self.stack.len() == STACK {
            return Err(Undefined("too many operands"));
        }
        self.stack.push(value);
        self.trace.highest = self.trace.highest.max(self.stack.len());
        Ok(())
    }

    /// Clear the stack, having taken a width if there is one.
    fn clear(&mut self, code: u16, width: bool) -> Vec<f32> {
        let mut operands = std::mem::take(&mut self.stack);
        if width {
            self.trace.width = Some(operands.remove(0));
        }
        if !self.cleared {
            self.trace.first = Some(code);
        }
        self.cleared = true;
        operands
    }

    fn report(&mut self, code: u16, operands: Vec<f32>) {
        let operator = spec::charstring(code).unwrap();
        self.trace.ops.push((operator, operands));
    }

    fn token(&mut self, global: &'l [Vec<u8>], local: &'l [Vec<u8>]) -> Result<(), Stop> {
        self.trace.tokens += 1;
        if self.trace.tokens > TOKENS {
            return Err(Undefined("too long"));
        }
        let first = match self.byte() {
            Some(first) => first,
            None => return Err(Undefined("no end operator")),
        };
        let number = match first {
            32..=246 => Some(first as i32 as f32 - 139.0),
            247..=250 => Some(((first as i32 - 247) * 256 + self.need()? as i32 + 108) as f32),
            251..=254 => Some((-(first as i32 - 251) * 256 - self.need()? as i32 - 108) as f32),
            28 => Some(i16::from_be_bytes([self.need()?, self.need()?]) as f32),
            255 => {
                let bytes = [self.need()?, self.need()?, self.need()?, self.need()?];
                Some((i32::from_be_bytes(bytes) as f64 / 65536.0) as f32)
            }
            _ => None,
        };
        if let Some(number) = number {
            self.push(number)?;
            let &(code, at) = self.frames.last().unwrap();
            if self.frames.len() == 1 && at == code.len() {
                return Err(Reject("cut after an operand"));
            }
            return Ok(());
        }
        let code = match first {
            12 => 0x0c00 | self.need()? as u16,
            _ => first as u16,
        };
        self.operator(code, global, local)
    }

    fn operator(
        &mut self,
        code: u16,
        global: &'l [Vec<u8>],
        local: &'l [Vec<u8>],
    ) -> Result<(), Stop> {
        let count = self.stack.len();
        let fresh = !self.cleared;
        if matches!(
            code,
            0x0c03..=0x0c05 | 0x0c09..=0x0c0c | 0x0c0e | 0x0c0f | 0x0c12 | 0x0c16 | 0x0c18
                | 0x0c1a..=0x0c1e
        ) {
            self.trace.arithmetic += 1;
        }
        // Moves: exactly so many, and possibly a width.
        let moves = |exact: usize| -> Result<bool, Stop> {
            if count < exact {
                Err(Reject("out of operands"))
            } else if count == exact {
                Ok(false)
            } else if count == exact + 1 && fresh {
                Ok(true)
            } else {
                Err(Undefined("superfluous operands"))
            }
        };
        let path = |least: usize, good: bool| -> Result<(), Stop> {
            if count < least {
                Err(Reject("out of operands"))
            } else if good {
                Ok(())
            } else {
                Err(Undefined("an odd number of operands"))
            }
        };
        match code {
            21 | 22 | 4 => {
                let width = moves(if code == 21 { 2 } else { 1 })?;
                self.drawn = true;
                let operands = self.clear(code, width);
                self.report(code, operands);
            }
            5 | 6 | 7 | 8 | 24 | 25 | 26 | 27 | 30 | 31 | 0x0c22..=0x0c25 => {
                match code {
                    5 => path(2, count % 2 == 0)?,
                    6 | 7 => path(1, true)?,
                    8 => path(6, count % 6 == 0)?,
                    24 => path(8, count % 6 == 2)?,
                    25 => path(8, count % 2 == 0)?,
                    26 | 27 | 30 | 31 => path(4, count % 4 <= 1)?,
                    0x0c22 => path(7, count == 7)?,
                    0x0c23 => path(13, count == 13)?,
                    0x0c24 => path(9, count == 9)?,
                    _ => path(11, count == 11)?,
                }
                self.drawn = true;
                let operands = self.clear(code, false);
                self.report(code, operands);
            }
            1 | 3 | 18 | 23 => {
                if count < 2 {
                    return Err(Reject("out of operands"));
                }
                if count % 2 == 1 && !fresh {
                    return Err(Undefined("an odd number of operands"));
                }
                if self.drawn || self.masked {
                    return Err(Undefined("a late hint"));
                }
                let operands = self.clear(code, count % 2 == 1);
                self.trace.stems += operands.len() / 2;
                self.report(code, operands);
            }
            19 | 20 => {
                if count % 2 == 1 && !fresh {
                    return Err(Undefined("an odd number of operands"));
                }
                if count > 1 && (self.drawn || self.masked) {
                    return Err(Undefined("a late hint"));
                }
                let operands = self.clear(code, count % 2 == 1);
                self.trace.stems += operands.len() / 2;
                if !operands.is_empty() {
                    self.trace.implied = true;
                }
                if self.trace.stems > 5_000 {
                    return Err(Undefined("too many hints"));
                }
                self.masked = true;
                self.trace.masks += 1;
                for _ in 0..(self.trace.stems + 7) / 8 {
                    if self.byte().is_none() {
                        return Err(Reject("cut inside a mask"));
                    }
                    self.trace.mask_bytes += 1;
                }
                self.report(code, vec![]);
            }
            14 => {
                let width = match count {
                    0 | 4 => false,
                    1 | 5 if fresh => true,
                    _ => return Err(Undefined("superfluous operands")),
                };
                // What follows in the charstring itself is not reached.
                if self.frames.iter().skip(1).any(|(code, at)| *at != code.len()) {
                    return Err(Undefined("something after the end operator"));
                }
                self.trace.accent = count > 1;
                self.clear(code, width);
                return Err(Stop::End);
            }
            10 | 29 => {
                let subroutines = if code == 10 { local } else { global };
                let i = self.whole()? as f64 + bias(subroutines.len()) as f64;
                if i < 0.0 || i >= subroutines.len() as f64 {
                    return Err(Reject("no such subroutine"));
                }
                if self.frames.len() > NESTING {
                    return Err(Reject("nested too deep"));
                }
                self.trace.calls += 1;
                self.frames.push((&subroutines[i as usize], 0));
                self.trace.depth = self.trace.depth.max(self.frames.len() - 1);
            }
            11 => {
                if self.frames.len() == 1 {
                    return Err(Reject("a return without a call"));
                }
                self.frames.pop();
            }
            0x0c03 => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push((a != 0.0 && b != 0.0) as u8 as f32)?;
            }
            0x0c04 => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push((a != 0.0 || b != 0.0) as u8 as f32)?;
            }
            0x0c05 => {
                let a = self.pop()?;
                self.push((a == 0.0) as u8 as f32)?;
            }
            0x0c09 => {
                let a = self.pop()?;
                self.push(if a < 0.0 { -a } else { a })?;
            }
            0x0c0a => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push((a as f64 + b as f64) as f32)?;
            }
            0x0c0b => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push((a as f64 - b as f64) as f32)?;
            }
            0x0c0c => {
                let (b, a) = (self.pop()?, self.pop()?);
                if b == 0.0 {
                    return Err(Undefined("a division by zero"));
                }
                self.push((a as f64 / b as f64) as f32)?;
            }
            0x0c0e => {
                let a = self.pop()?;
                self.push(0.0 - a)?;
            }
            0x0c0f => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push((a == b) as u8 as f32)?;
            }
            0x0c12 => {
                self.pop()?;
            }
            0x0c16 => {
                let (v2, v1) = (self.pop()?, self.pop()?);
                let (s2, s1) = (self.pop()?, self.pop()?);
                self.push(if v1 <= v2 { s1 } else { s2 })?;
            }
            0x0c18 => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push((a as f64 * b as f64) as f32)?;
            }
            0x0c1a => {
                let a = self.pop()?;
                if a < 0.0 {
                    return Err(Undefined("a square root of a negative number"));
                }
                self.push((a as f64).sqrt() as f32)?;
            }
            0x0c1b => {
                let a = self.pop()?;
                self.push(a)?;
                self.push(a)?;
            }
            0x0c1c => {
                let (b, a) = (self.pop()?, self.pop()?);
                self.push(b)?;
                self.push(a)?;
            }
            0x0c1d => {
                let i = self.whole()?;
                let n = self.stack.len();
                let i = if i < 0.0 { 0 } else { i as u64 as usize };
                if i >= n {
                    return Err(Reject("out of operands"));
                }
                self.push(self.stack[n - 1 - i])?;
            }
            0x0c1e => {
                if count < 2 {
                    return Err(Reject("out of operands"));
                }
                let shift = self.whole()?;
                let span = self.whole()?;
                if span < 0.0 {
                    return Err(Reject("a negative span"));
                }
                if span > self.stack.len() as f32 {
                    return Err(Reject("out of operands"));
                }
                if shift.abs() >= 2147483648.0 {
                    return Err(Undefined("a giant shift"));
                }
                let span = span as usize;
                if span > 0 {
                    let start = self.stack.len() - span;
                    let part = self.stack[start..].to_vec();
                    let shift = (shift as i64).rem_euclid(span as i64) as usize;
                    for (i, value) in part.into_iter().enumerate() {
                        self.stack[start + (i + shift) % span] = value;
                    }
                }
            }
            0x0c14 | 0x0c15 | 0x0c17 => return Err(Reject("an unimplemented operator")),
            _ => return Err(Reject("a reserved operator")),
        }
        Ok(())
    }
}

// --------------------------------------------------------------- observation

#[derive(Clone, Debug)]
pub struct Seen {
    pub ops: Vec<Op>,
    /// The width after each operation.
    pub widths: Vec<Option<f32>>,
    /// How it ended: at the end, with an error, or neither within the limit.
    pub end: Option<Result<(), String>>,
    /// The width then.
    pub width: Option<f32>,
    /// The number of further steps that did not report the end again.
    pub revived: usize,
    /// The width after those.
    pub later: Option<f32>,
}

/// Step a program to its end and a few times past it.
pub fn observe(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], limit: usize) -> Seen {
    let mut program = Program::new(code, global, local);
    drive(&mut program, limit)
}

pub fn drive(program: &mut Program, limit: usize) -> Seen {
    let mut seen = Seen {
        ops: vec![],
        widths: vec![],
        end: None,
        width: None,
        revived: 0,
        later: None,
    };
    while seen.ops.len() < limit {
        match program.next() {
            Ok(Some(op)) => {
                seen.ops.push(op);
                seen.widths.push(program.width());
            }
            Ok(None) => {
                seen.end = Some(Ok(()));
                break;
            }
            Err(error) => {
                seen.end = Some(Err(format!("{:?}", error.kind())));
                break;
            }
        }
    }
    seen.width = program.width();
    for _ in 0..3 {
        if !matches!(program.next(), Ok(None)) {
            seen.revived += 1;
        }
    }
    seen.later = program.width();
    seen
}

/// The operations differ from those expected.
pub fn wrong_ops(trace: &Trace, seen: &Seen) -> Option<String> {
    for (i, want) in trace.ops.iter().enumerate() {
        match seen.ops.get(i) {
            Some(got) if got == want => {}
            Some(got) => return Some(format!("operation {i} is {got:?} instead of {want:?}")),
            None => {
                return Some(format!(
                    "operation {i} should be {want:?} but it ended with {:?}",
                    seen.end
                ))
            }
        }
    }
    if trace.end == End::Done {
        if seen.ops.len() > trace.ops.len() {
            return Some(format!(
                "{:?} after the end",
                seen.ops[trace.ops.len()]
            ));
        }
        if seen.end != Some(Ok(())) {
            return Some(format!(
                "after {} operations {:?} instead of the end",
                seen.ops.len(),
                seen.end
            ));
        }
    }
    None
}

/// The width differs from the one expected, at any point.
pub fn wrong_width(trace: &Trace, seen: &Seen) -> Option<String> {
    let n = trace.ops.len().min(seen.widths.len());
    for i in 0..n {
        if seen.ops[i].0 != trace.ops[i].0 {
            return None;
        }
        if seen.widths[i] != trace.width {
            return Some(format!(
                "the width after operation {i} ({:?}) is {:?} instead of {:?}",
                trace.ops[i].0, seen.widths[i], trace.width
            ));
        }
    }
    if trace.end == End::Done && seen.end == Some(Ok(())) && seen.width != trace.width {
        return Some(format!(
            "the width at the end is {:?} instead of {:?}",
            seen.width, trace.width
        ));
    }
    None
}

/// The width changed after the first operation, whatever the charstring.
pub fn unsteady_width(seen: &Seen) -> Option<String> {
    let first = match (seen.widths.first(), &seen.end) {
        (Some(first), _) => *first,
        (None, Some(Ok(()))) => seen.width,
        _ => return None,
    };
    let rest = [seen.width, seen.later];
    let n = seen.widths.len();
    seen.widths.iter().chain(&rest).enumerate().find_map(|(i, width)| {
        let same = match (*width, first) {
            (Some(a), Some(b)) => a.to_bits() == b.to_bits(),
            (a, b) => a.is_none() && b.is_none(),
        };
        (!same).then(|| {
            format!("the width is {first:?} at first and {width:?} after operation {i} of {n}")
        })
    })
}

/// The end is not where it should be, or does not last.
pub fn wrong_end(trace: &Trace, seen: &Seen) -> Option<String> {
    if trace.end != End::Done {
        return None;
    }
    if seen.ops.len() != trace.ops.len() {
        return Some(format!(
            "{} operations instead of {}",
            seen.ops.len(),
            trace.ops.len()
        ));
    }
    if seen.end != Some(Ok(())) {
        return Some(format!("{:?} instead of the end", seen.end));
    }
    if seen.revived > 0 {
        return Some(format!("{} of 3 further steps did not report the end", seen.revived));
    }
    if seen.later != seen.width {
        return Some(format!(
            "the width changed from {:?} to {:?} after the end",
            seen.width, seen.later
        ));
    }
    None
}

/// A malformed charstring was not reported where it goes wrong.
pub fn wrong_reject(trace: &Trace, seen: &Seen) -> Option<String> {
    let why = match trace.end {
        End::Reject(why) => why,
        _ => return None,
    };
    for (i, want) in trace.ops.iter().enumerate() {
        if seen.ops.get(i) != Some(want) {
            return Some(format!(
                "{why}: operation {i} before it is {:?} instead of {want:?} ({:?})",
                seen.ops.get(i),
                seen.end
            ));
        }
    }
    if seen.ops.len() > trace.ops.len() {
        return Some(format!(
            "{why}: continued with {:?}",
            seen.ops[trace.ops.len()]
        ));
    }
    match seen.end {
        Some(Err(_)) => None,
        _ => Some(format!("{why}: ended with {:?}", seen.end)),
    }
}
